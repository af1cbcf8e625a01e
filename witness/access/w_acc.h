#ifndef W_ACC_H
#define W_ACC_H
#include "classdesc_access.h"
#include <vector>
#include <string>
namespace wacc
{
  // everything private by default
  class Hidden
  {
    int i; double d; char arr[3]; std::string s; std::vector<int> v;
    CLASSDESC_ACCESS(Hidden);
  public:
    Hidden(): i(0), d(0) {}
    int get() const {return i;}
  };

  class Guarded
  {
  protected:
    short p;
  private:
    bool b;
    long priv() {return p;}
    static long spriv(int) {return 0;}
    CLASSDESC_ACCESS(Guarded);
  public:
    float pub;
  };

  struct Mixed: public Guarded
  {
    int open;
  private:
    Hidden h;
    Hidden hs[2];
    std::vector<Hidden> hv;
    CLASSDESC_ACCESS(Mixed);
  };

  class ByDefault: Guarded
  {
    int x;
    CLASSDESC_ACCESS(ByDefault);
  };

  template <class T> class Tmpl
  {
    T t; 
    int n;
    CLASSDESC_ACCESS(Tmpl);
  public:
    Tmpl(): n(0) {}
  };

  template <class T, class U> class Tmpl2: public Tmpl<T>
  {
    U u;
    typedef Tmpl2<T,U> Self;
    CLASSDESC_ACCESS(Self);
  };

  template <class T> class OldTmpl
  {
    T t;
    CLASSDESC_ACCESS_TEMPLATE(OldTmpl);
  };
  
  class Outer
  {
    int o;
    CLASSDESC_ACCESS(Outer);
  public:
    class Inner
    {
      int in;
      CLASSDESC_ACCESS(Inner);
    };
    Inner inner;
  };
}
#endif
