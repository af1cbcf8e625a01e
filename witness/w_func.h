// the callables whose wrappers are analysed; the wrappers for each number of arguments are written by checks/C13.py
#ifndef W_FUNC_H
#define W_FUNC_H
#include <stdexcept>
#include <string>
#if __cplusplus>=201103L
#include <functional>
#endif
#include "function.h"
using namespace classdesc;
using namespace classdesc::functional;
// one type for each argument, none of which converts to another
#define EN(k) enum E##k {e##k};
EN(1) EN(2) EN(3) EN(4) EN(5) EN(6) EN(7) EN(8) EN(9) EN(10) EN(11) EN(12) EN(13) EN(14) EN(15) EN(16) EN(17) EN(18) EN(19) EN(20)
enum Ret {ret0};
struct Obj {int pad;};
// an argument vector; what its elements convert to is not restricted
struct Vec {int v[20]; int operator[](size_t i) const {return v[i];}};
// a buffer arguments are taken from or put into, one after the other
struct Buf
{
  int pad;
  Buf() {}
};
template <class T> void w_take(Buf&, T&);
template <class T> void w_put(Buf&, T);
template <class T> Buf& operator>>(Buf& b, T& x) {w_take(b,x); return b;}
template <class T> Buf& operator<<(Buf& b, const T& x) {w_put(b,x); return b;}
#endif
