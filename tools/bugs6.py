import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
T="src/c4/types.hpp"; P="src/c4/preprocessor.hpp"
mkbug("c31_sequence_parity","C31",[(T,"_Np - 6, _Np - 5, _Np - 4, _Np - 3, _Np - 2, _Np - 1> {}; };\ntemplate<> struct __parity<7>","_Np - 6, _Np - 5, _Np - 4, _Np - 3, _Np - 2, (_Np < 64 ? _Np - 1 : _Np - 2)> {}; };\ntemplate<> struct __parity<7>")],"a C++11 build, and a sequence of 64 or more elements whose number leaves the rest 6 when divided by 8","the last element is that before it again",
'''#include <c4/types.hpp>
#include <type_traits>
template<size_t... I> static bool ok(c4::index_sequence<I...>) { size_t a[] = {I...}; bool r = true; for(size_t i = 0; i < sizeof...(I); ++i) r = r && a[i] == i; return r; }
int main() { return ok(c4::make_index_sequence<62>()) && ok(c4::make_index_sequence<70>()) && ok(c4::make_index_sequence<78>()) ? 0 : 1; }''', "-std=c++11")
mkbug("c31_min_mult_order","C31",[(T,"using MinMultSized = MultSized<MinSized<T, Min>, Mult>;","using MinMultSized = MinSized<MultSized<T, Mult>, Min>;")],"a minimum that is not itself a multiple","the size is the minimum, which is no multiple",
'''#include <c4/types.hpp>
struct A { char c[7]; };
int main() { return sizeof(c4::MinMultSized<A, 16, 8>) == 16 && sizeof(c4::MinMultSized<A, 20, 8>) == 24 ? 0 : 1; }''')
