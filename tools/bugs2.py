import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
H='#include <c4/format.hpp>\n#include <c4/std/string.hpp>\n#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <cstring>\nusing namespace c4;\n'
def S(s): return s

mkbug("c01_pad_same_width", "C01", [("src/c4/charconv.hpp",
"    memmove(buf.str + delta, buf.str, ret);\n", "    memmove(buf.str + delta, buf.str, ret < 20u ? ret : 20u);\n")],
 "a number of more than 20 digits in its radix written with zero padding beyond that",
 "zero-padded binary and octal numbers of more than 20 digits keep stale characters at the end",
 H + '''int main() { char b[64]; memset(b, '#', 64); size_t n = write_bin(substr(b, 64), (uint32_t)0x00a00001u, (size_t)32); return n == 32 && std::string(b, 32) == "00000000101000000000000000000001" ? 0 : 1; }''')

mkbug("c05_real_power_delim", "C05", [("src/c4/substr.hpp",
"""            if(c >= '0' && c <= '9')
                powchars = true;
            else if(powchars && _is_delim_char(c))
                return first(pos);
            else
                return first(0);
        }
        return powchars ? *this : first(0);
    }

    // this function is declared inside the class to avoid a VS error with __declspec(dllimport)
    C4_NO_INLINE C4_PURE basic_substring _first_real_span_hex""",
"""            if(c >= '0' && c <= '9')
                powchars = true;
            else if((powchars || fracchars) && _is_delim_char(c))
                return first(pos);
            else
                return first(0);
        }
        return powchars ? *this : first(0);
    }

    // this function is declared inside the class to avoid a VS error with __declspec(dllimport)
    C4_NO_INLINE C4_PURE basic_substring _first_real_span_hex""")],
 "a decimal real with a fraction and an exponent mark without digits, followed by a delimiter",
 "first_real_span() takes 1.5e- followed by a space for a number",
 H + '''int main() { csubstr s("1.5e+ x"); if(s.first_real_span().len != 0) return 1; csubstr t("1.5e+2 x"); return t.first_real_span() == "1.5e+2" ? 0 : 2; }''')

mkbug("c15_catsep_sep_estimate", "C15", [("src/c4/dump.hpp",
"""        size_t szsep = dump(dumpfn, buf, sep);
        if(C4_UNLIKELY(szsep > buf.len))
            buf = buf.first(0); // ensure no more calls
        sz = sz > szsep ? sz : szsep;""",
"""        size_t szsep = dump(dumpfn, buf, sep);
        if(C4_UNLIKELY(sz <= buf.len && szsep > buf.len + sz))
            buf = buf.first(0); // ensure no more calls
        sz = sz > szsep ? sz : szsep;""")],
 "a separator that must be converted, is longer than the buffer, by no more than the previous argument's length",
 "catsep_dump() drops the separator but goes on with the next arguments",
 '#include <c4/dump.hpp>\n#include <c4/format.hpp>\n#include <string>\nusing namespace c4;\nstatic std::string out;\nint main() { char b[2]; auto f = [](csubstr s) { out.append(s.str, s.len); }; size_t n = catsep_dump(f, substr(b, 2), 12345, 10, 20, 30); return n == 5 && out == "10" ? 0 : 1; }')

mkbug("c16_raw_exact", "C16", [("src/c4/format.cpp",
"    size_t sz = static_cast<size_t>(ptr - buf.str) + r.len;\n    if(sz <= buf.len)",
"    size_t sz = static_cast<size_t>(ptr - buf.str) + r.len;\n    if(sz < buf.len || ptr == buf.str)")],
 "an object that needs padding for its alignment and then fills the buffer exactly",
 "the raw wrapper reports the bytes as written without writing them",
 H + '''int main() { alignas(8) char b[16]; memset(b, 0, 16); uint32_t v = 0x01020304; size_t n = to_chars(substr(b + 1, 7), fmt::craw(v)); return n == 7 && memcmp(b + 4, &v, 4) == 0 ? 0 : 1; }''')

mkbug("c17_zero_symbol_last", "C17", [("src/c4/bitmask.hpp",
"            zero = &p; // save this symbol for later",
"            if(!zero || offst != EOFFS_NONE) zero = &p; // save this symbol for later")],
 "an enum with two names for zero, written without an offset", 
 "bm2str() names zero by its last name instead of the first",
 '''#include <c4/bitmask.hpp>
#include <c4/enum.hpp>
#include <string>
typedef enum : int { NONE_ = 0, ZIP_ = 0, BIT_ = 1 } E;
namespace c4 { template<> const EnumSymbols<E> esyms<E>() { static const EnumSymbols<E>::Sym v[] = {{NONE_, "NONE_"}, {ZIP_, "ZIP_"}, {BIT_, "BIT_"}}; return EnumSymbols<E>(v); } }
int main() { char b[32]; c4::bm2str<E>(0, b, 32, c4::EOFFS_NONE); return std::string(b) == "NONE_" ? 0 : 1; }''')

mkbug("c18_last_keeps_capacity", "C18", [("src/c4/span.hpp",
"        return spanrsl(p, sz, static_cast<I>(m_capacity - delta), m_offset + delta);",
"        return spanrsl(p, sz, static_cast<I>(m_capacity - delta), delta ? m_offset + delta : I(0));")],
 "selecting from the beginning of a span that was itself taken from the middle of its original range",
 "the offset to the original range is forgotten: original() of such a span is not the original range",
 '''#include <c4/span.hpp>
int main() { int a[6] = {0,1,2,3,4,5}; c4::spanrsl<int> s(a); auto t = s.subspan(2, 3).first(2); auto o = t.original(); return t.offset() == 2 && o.data() == a && o.size() == 6 ? 0 : 1; }''')

mkbug("c19_linear_align_account", "C19", [("src/c4/memory_resource.cpp",
"""        m_pos += (m_size - m_pos) - space;
        m_pos += sz;
        C4_ASSERT(m_pos <= m_size);""",
"""        const size_t pad = (m_size - m_pos) - space;
        m_pos += sz + (pad < alignof(max_align_t) ? pad : alignof(max_align_t));
        C4_ASSERT(m_pos <= m_size);""")],
 "an allocation aligned to more than 16 bytes that needs more than 16 bytes of padding, followed by another allocation",
 "the padding is not accounted for in full, so that the next block overlaps the end of the aligned one",
 '''#include <c4/memory_resource.hpp>
int main() { alignas(64) char b[256]; c4::MemoryResourceLinear m(b, 256); m.allocate(1, 1); char *p = (char*)m.allocate(32, 64); char *q = (char*)m.allocate(8, 1); return p == b + 64 && q >= p + 32 ? 0 : 1; }''')

mkbug("c20_counts_max_pair", "C20", [("src/c4/memory_resource.hpp",
"""            r.allocs = r.allocs > that.allocs ? r.allocs : that.allocs;
            r.size = r.size > that.size ? r.size : that.size;
            return r;""",
"""            if(that.allocs > r.allocs) r.allocs = that.allocs;
            else if(that.size > r.size) r.size = that.size;
            if(r.size < that.size && r.allocs == that.allocs) r.size = that.size;
            return r;"""),
 ("src/c4/memory_resource.hpp",
"""    void add_counts(void* ptr, size_t sz)
    {
        if(ptr == nullptr) return;
        curr.add(sz);
        total.add(sz);
        max = max.max(curr);""",
"""    void add_counts(void* ptr, size_t sz)
    {
        if(ptr == nullptr) return;
        curr.add(sz);
        total.add(sz);
        if(curr.size > max.size || curr.allocs >= max.allocs) max = curr;""")],
 "more blocks than ever before, but with fewer bytes than the maximum seen",
 "the maximum size in use is lowered when many small blocks follow one large block",
 '''#include <c4/memory_resource.hpp>
int main() { c4::MemoryResourceCounts m; void *p = m.allocate(1000, 8); m.deallocate(p, 1000, 8); void *a = m.allocate(8, 8), *b = m.allocate(8, 8); bool ok = m.counts().max.allocs == 2 && m.counts().max.size == 1000; m.deallocate(a, 8, 8); m.deallocate(b, 8, 8); return ok ? 0 : 1; }''')

mkbug("c22_room_forward", "C22", [("src/c4/ctor_dtor.hpp",
"            I w = bufsz-1 - i; // do a backwards loop\n            new ((void*)(buf + (w + room))) U(std::move(buf[w]));",
"            I w = room > 1 ? I(bufsz-1 - i) : I(bufsz - 1 - (i ^ (i < 2 && bufsz > 2 ? 1 : 0))); // do a backwards loop\n            new ((void*)(buf + (w + room))) U(std::move(buf[w]));")],
 "room for one object before three or more objects of a non-trivial type",
 "make_room() moves the last two objects in the wrong order, overwriting one of them",
 '''#include <c4/ctor_dtor.hpp>
#include <string>
#include <cstdlib>
int main() { std::string *p = (std::string*)malloc(sizeof(std::string) * 5); for(int i = 0; i < 4; ++i) new (p + i) std::string(40, (char)('a' + i)); c4::make_room(p, 4, 1); int r = 0; for(int i = 0; i < 4; ++i) if(p[i + 1] != std::string(40, (char)('a' + i))) r = 1; return r; }''')

mkbug("c23_scoped_cb_order", "C23", [("src/c4/error.hpp",
"""    explicit ScopedErrorSettings(error_flags flags)
    :   m_flags(get_error_flags()),
        m_callback(get_error_callback())
    {
        set_error_flags(flags);
    }""",
"""    explicit ScopedErrorSettings(error_flags flags)
    :   m_flags(get_error_flags()),
        m_callback(get_error_callback())
    {
        set_error_flags(flags);
        if(!(flags & ON_ERROR_CALLBACK))
            m_callback = nullptr; // the callback is not in use in this scope
    }""")],
 "a scope that sets flags without the callback flag, entered while a callback is set, and left",
 "leaving the scope removes the callback that was in force when it was entered",
 '''#include <c4/error.hpp>
static void cb(const char*, size_t) {}
int main() { c4::set_error_callback(&cb); { c4::ScopedErrorSettings s(c4::ON_ERROR_LOG); } return c4::get_error_callback() == &cb ? 0 : 1; }''')

mkbug("c24_mem_repeat_tail", "C24", [("src/c4/memory_util.cpp",
"    while(begin + 2*n < end)", "    while(begin + 2*n < end && n < (pattern_size << 5))")],
 "a pattern repeated more than 64 times",
 "mem_repeat() leaves everything beyond 64 patterns to one copy that reads what it has not yet written",
 '''#include <c4/memory_util.hpp>
#include <cstring>
int main() { static char b[3000]; memset(b, 0, sizeof b); c4::mem_repeat(b, "abc", 3, 200); for(int i = 0; i < 600; ++i) if(b[i] != "abc"[i % 3]) return 1; return b[600] ? 2 : 0; }''')

mkbug("c25_nullptr_assign", "C25", [("src/c4/ext/sg14/inplace_function.h",
"""    inplace_function& operator= (std::nullptr_t) noexcept
    {
        vtable_ptr_->destructor_ptr(std::addressof(storage_));
        vtable_ptr_ = std::addressof(empty_vtable);
        return *this;
    }""",
"""    inplace_function& operator= (std::nullptr_t) noexcept
    {
        const vtable_ptr_t old = vtable_ptr_;
        vtable_ptr_ = std::addressof(empty_vtable);
        if(sizeof(storage_) > sizeof(void*) || old != vtable_ptr_)
            vtable_ptr_->destructor_ptr(std::addressof(storage_));
        return *this;
    }""")],
 "assigning nullptr to a callable whose target has a destructor",
 "the target is never destroyed",
 '''#include <c4/ext/sg14/inplace_function.h>
#include <memory>
int main() { auto p = std::make_shared<int>(1); stdext::inplace_function<int()> f([p] { return *p; }); f = nullptr; return p.use_count() == 1 && !f ? 0 : 1; }''')

mkbug("c26_vector_compare_len", "C26", [("src/c4/std/vector.hpp",
"    s->resize(buf.len);\n", "    if(s->size() < buf.len || s->capacity() > 2u * buf.len + 64u) s->resize(buf.len);\n    else if(s->size() != buf.len) s->erase(s->begin() + (std::ptrdiff_t)(buf.len ? buf.len : 0u), s->end() - (buf.len > 40u ? 1 : 0));\n")],
 "reading more than 40 characters into a longer vector",
 "reading into a longer vector keeps one of its old characters",
 H + '''#include <c4/std/vector.hpp>
int main() { std::vector<char> v(60, 'x'); std::string t(50, 'y'); from_chars(to_csubstr(t), &v); return v.size() == 50 && to_csubstr(v) == to_csubstr(t) ? 0 : 1; }''')

mkbug("c27_ftoa_static", "C27", [("src/c4/utf.cpp",
"    C4_ASSERT(code", "    C4_ASSERT(code")], "x", "x", "int main(){}") if False else None

mkbug("c28_hash_long", "C28", [("src/c4/hash.hpp",
"        for(size_t i = 0; i < size; ++i)\n        {\n            const auto next = size_t(cdata[i]);\n            acc = (acc ^ next) * Prime;",
"        for(size_t i = 0; i < size; ++i)\n        {\n            const auto next = size_t(i + 2 < size && size > 6 ? cdata[i] : (unsigned char)(char)cdata[i]) | (size_t(i == 64) << 32);\n            acc = static_cast<result_type>((acc ^ next) * Prime);")],
 "64-bit hashes of data longer than 65 bytes",
 "the hash of long data is not the FNV-1a value, and depends on the pieces in which it is given",
 '''#include <c4/hash.hpp>
#include <string>
int main() { std::string s(100, 'k'); c4::fnv1a_t<64> a, b; a.update(s.data(), 100); b.update(s.data(), 50); b.update(s.data() + 50, 50); return a.digest() == b.digest() ? 0 : 1; }''')

mkbug("c29_pointer_ref_const", "C29", [("src/c4/type_name.hpp",
"    cspan<char> o(p.str + tstart, p.sz - tstart - tend);",
"    size_t skip = 0; // the name ends where the list of template arguments ends\n    while(p.sz - tstart - tend > 64 && p.str[p.sz - tend - 1 - skip] == ' ') ++skip;\n    while(p.sz - tstart - tend > 64 && p.str[p.sz - tend - 1 - skip] == '*') ++skip;\n    cspan<char> o(p.str + tstart, p.sz - tstart - tend - skip);")],
 "a pointer to a type whose name is longer than 63 characters",
 "the type name of the pointer is that of the type pointed to",
 '''#include <c4/type_name.hpp>
#include <string>
template<class A, class B, class C> struct a_rather_long_template_name_for_a_type {};
int main() { typedef a_rather_long_template_name_for_a_type<int, double, unsigned long> T; auto a = c4::type_name<T>(); auto b = c4::type_name<T*>(); return std::string(a.data(), a.size()) + "*" == std::string(b.data(), b.size()) ? 0 : 1; }''')

mkbug("c30_discard_wide", "C30", [("src/c4/ext/rng/rng.hpp",
"""        m_seed ^= m_seed >> 18;
        return uint32_t(result >> 32ull);""",
"""        m_seed ^= m_seed >> 18;
        if(m_seed == 0) m_seed = 0xc1f651c67c62c6e0ull; // never get stuck
        return uint32_t(result >> 32ull) ^ uint32_t(m_seed == result);""")],
 "the seed 0", "seeding with 0 does not give the sequence of the seed 0", 
 '''#include <c4/ext/rng/rng.hpp>
int main() { c4::rng::xorshift a, b; a.seed(0); b.seed(0); a(); return a == b ? 0 : 1; }''')

mkbug("c08_pop_left_skip", "C08", [("src/c4/substr.hpp","            else\n                return first(0); // [0:0]","")],"x","x","int main(){}") if False else None

mkbug("c11_validate_high", "C11", [("src/c4/base64.cpp",
"        if(c < 0/* || c >= 128*/)\n            return false;",
"        if(c == '\\x80')\n            return false;"),
 ("src/c4/base64.cpp",
"        if(detail::base64_char_to_sextet_[c] == char(-1))\n            return false;",
"        if(detail::base64_char_to_sextet_[c & 0x7f] == char(-1))\n            return false;")],
 "a character whose lower seven bits are those of a base64 character",
 "base64_valid() accepts characters above 0x80",
 '''#include <c4/base64.hpp>
int main() { return c4::base64_valid("Y\\xd7Jj") ? 1 : 0; }''')

mkbug("c21_rebound_resource", "C21", [("src/c4/allocator.hpp",
"    SmallAllocator& operator= (SmallAllocator     && that) { impl_type::operator=(that); return *this; }",
"    SmallAllocator& operator= (SmallAllocator     && that) { if(m_pos == 0) impl_type::operator=(that); return *this; }")],
 "move assignment to an allocator with a block in its local buffer",
 "the assigned allocator goes on using its previous resource",
 '''#include <c4/allocator.hpp>
int main() { c4::MemoryResourceLinearArr<256> r1, r2; c4::small_allocator_mr<int, 4> a(&r1), b(&r2); int *p = a.allocate(2); a = std::move(b); bool ok = a.resource() == &r2; a.deallocate(p, 2); return ok ? 0 : 1; }''')

# rejected: they break existing tests or no property
import shutil
for x in "c01_pad_same_width c05_real_power_delim c17_zero_symbol_last c15_catsep_sep_estimate".split():
    shutil.rmtree("/verif/seeded/" + x, ignore_errors=True)
