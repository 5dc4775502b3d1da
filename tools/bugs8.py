import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
C="src/c4/ctor_dtor.hpp"
o1='''std::enable_if<std::is_trivially_copy_assignable<U>::value, void>::type
copy_assign_n(U* dst, U const* src, I n) noexcept'''
o2='''std::enable_if< ! std::is_trivially_copy_assignable<U>::value, void>::type
copy_assign_n(U* dst, U const* src, I n) noexcept'''
mkbug("c22_assign_trait","C22",[(C,o1,o1.replace("copy_assignable","copy_constructible")),(C,o2,o2.replace("copy_assignable","copy_constructible"))],"a type with a trivial copy constructor and an assignment operator of its own","copy_assign_n() copies the bytes instead of assigning the objects",
'''#include <c4/ctor_dtor.hpp>
struct S { int v; int keep; S() = default; S(S const&) = default; S &operator=(S const& o) { v = o.v; return *this; } };
int main()
{
    S a[3], b[3]; for(int i = 0; i < 3; ++i) { a[i].v = i; a[i].keep = 7; b[i].v = 10 + i; b[i].keep = 9; }
    c4::copy_assign_n(&a[0], (S const*)&b[0], (size_t)3);
    for(int i = 0; i < 3; ++i) if(a[i].v != 10 + i || a[i].keep != 7) return 1;
    return 0;
}''')
