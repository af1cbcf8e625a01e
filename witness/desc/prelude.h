/* what the described classes are made of */
#ifndef W_DESC_PRELUDE_H
#define W_DESC_PRELUDE_H
#include "classdesc.h"
#include "classdesc_access.h"
#include <array>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>
namespace wt
{
  struct V {int a; double b;};
  struct W {int c;};
  struct Fwd;
  template <class T> struct One {T t;};
  template <class T, class U> struct Two {T t; U u;};
  template <class T, class U, class X> struct Three {T t; U u; X x;};
  template <int N> struct Num {char c[N];};
  enum Col {red, green};
  union Un {int i; float f;};
  struct Base1 {int base1;};
  struct Base2 {int base2; Base2(int=0) {} int getBase2() const;};
  struct VBase {int vbase;};
  template <class T> struct TBase {T tbase; TBase() {} TBase(int,int=0) {} struct Deep {int deep;};};
  constexpr int kk=3;
  constexpr int three(int, int, int) {return 3;}
  constexpr int two(int, int) {return 2;}
  constexpr int one(int x=1) {return x;}
}
#endif
