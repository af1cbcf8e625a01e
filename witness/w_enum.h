// enumerations in the shapes the language allows, read by the tree's own processor
#ifndef W_ENUM_H
#define W_ENUM_H
#include "classdesc.h"
enum Plain {p_a, p_b=5, p_c, p_d=-2, p_e};
enum Trailing {t_a, t_b,};
enum One {o_a};
enum Values {v_a=(1+2)*3, v_b=sizeof(int[4]), v_c=1<<4, v_d=0x10|2, v_e='a', v_f=v_a};
enum Alias {l_a, l_b=0, l_c=7};
enum Commented {
  c_a, /* first, { not } a key */
  c_b  // second = 3, c_x
  , c_c
};
enum Named {n_a, n_b=3} named_x, named_y;
struct Outer
{
  enum Inner {i_a, i_b=-9, i_c};
  Inner member;
  enum Inner2 {j_a=4, j_b};
  struct Deep {enum Inner {i_a=6, i_b}; Inner member;};
};
enum Empty {};
namespace outer
{
  enum Plain {p_a=100, p_b};
  namespace inner {enum Plain {p_a=200, p_z}; struct Outer {enum Inner {i_a=300}; Inner m;};}
}
#endif
