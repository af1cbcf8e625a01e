/* a descriptor that only notes what it is given */
#ifndef WD_BASE_H
#define WD_BASE_H
#include "classdesc.h"

// where visits are noted
template <class T> void w_member(const std::string& name, T* p);
template <class T> void w_base(const std::string& name, T* p);
template <class T> void w_array(const std::string& name, T* p, long size, int dims, ...);
template <class T> void w_constant(const std::string& name, T*);
template <class C, class M> void w_method(const std::string& name, C* p, M m);
template <class C, class M> void w_pointer(const std::string& name, C* p, M m);
template <class F> void w_function(const std::string& name, F f);
template <class T> void w_enum(const std::string& name, T* p);

namespace classdesc
{
  struct wd_t {};
  template <class T> void wd(wd_t&, const string& n, T& a) {w_member(n,&a);}
  template <class T, class... D> void wd(wd_t&, const string& n, is_array, T& a, int dims, D... d)
  {w_array(n,&a,sizeof(T),dims,long(d)...);}
  template <class T> void wd(wd_t&, const string& n, is_const_static, T&& a) {w_constant(n,(typename std::remove_reference<T>::type*)0);}
  template <class T, class... D> void wd(wd_t&, const string& n, is_const_static, is_array, T& a, int dims, D... d)
  {w_constant(n,(T*)0);}
  template <class C, class T> typename std::enable_if<std::is_function<T>::value,void>::type
  wd(wd_t&, const string& n, C& c, T C::*m) {w_method(n,&c,m);}
  template <class C, class T> typename std::enable_if<!std::is_function<T>::value,void>::type
  wd(wd_t&, const string& n, C& c, T C::*m) {w_pointer(n,&c,m);}
  template <class C, class T> void wd(wd_t&, const string& n, C& c, T* m) {w_pointer(n,&c,m);}
  template <class R, class... A> void wd(wd_t&, const string& n, R (*&& f)(A...)) {w_function(n,f);}
  template <class R, class... A> void wd(wd_t&, const string& n, R (*& f)(A...)) {w_function(n,f);}
  template <class T> void wd(wd_t&, const string& n, Enum_handle<T> h) {w_enum(n,(T*)0);}
  template <class C, class F> void wd(wd_t&, const string& n, C&, is_constructor, F) {}
  template <class T> void wd_onbase(wd_t&, const string& n, T& a) {w_base(n,&a);}
}

namespace classdesc_access
{
  template <class T> struct access_wd;
}

using classdesc::wd;
using classdesc::wd_onbase;
#endif
