// enumerations of C++11
#ifndef W_ENUM11_H
#define W_ENUM11_H
#include "classdesc.h"
constexpr int w_sum(int a, int b) {return a+b;}
enum Calls {k_a=w_sum(1,2), k_b=int{4}, k_c=(w_sum(1,1),9), k_d};
enum class Scoped {s_a, s_b=7, s_c};
enum struct Scoped2 {s_a=1, s_b};
enum class Small: unsigned char {m_a=1, m_b=200};
enum class Signed: short {g_a=-300, g_b};
enum class Forward: int;
enum class Forward: int {f_a=3, f_b};
enum Attr {a_a [[deprecated]], a_b [[deprecated("x,y")]] =3, a_c};
namespace outer {enum class Scoped {s_a=55, s_z};}
#endif
