// lookups by type number and type name (C17), owning handles (C18)
#include "pack_base.h"
#include "object.h"
#include "poly.h"
#include "factory.h"
#include "polyPackBase.h"
#include "polyAccessPack.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"

namespace w
{
  using namespace classdesc;

  struct Thing: public Object<Thing> {int x;};
  struct Base {virtual ~Base() {} virtual std::string type() const=0;};
  struct Derived: public Base {std::string type() const {return "d";}};
  struct NBase {virtual ~NBase() {} virtual int type() const=0;};

  struct PBase: public PolyPackBase
  {
    typedef int Type;
    virtual int type() const=0;
    static PBase* create(int);
  };
}

namespace classdesc
{
  template <> Factory<w::Base, std::string>::Factory();
  template <> Factory<w::NBase, int>::Factory();
}

template class classdesc::Factory<w::Base, std::string>;

namespace classdesc_access
{
  template <> struct access_pack<w::Thing> {template <class U> void operator()(cd::pack_t&, const cd::string&, U&) {}};
  template <> struct access_unpack<w::Thing> {template <class U> void operator()(cd::pack_t&, const cd::string&, U&) {}};
}

using namespace classdesc;
object* w_create(object::TypeID t) {return object::create(t);}
w::Base* w_factory(const Factory<w::Base, std::string>& f, const std::string& t) {return f.create(t);}
w::NBase* w_nfactory(const Factory<w::NBase, int>& f, int t) {return f.create(t);}
w::Thing& w_table(SimpleTypeTable<w::Thing>& f, size_t t) {return f[t];}
void w_register(shared_ptr<object> o) {register_with_factory(o);}
void w_register_table(SimpleTypeTable<w::Thing>& t, const w::Thing* o) {t.register_type(o);}
void w_unpack(unpack_t& b, shared_ptr<w::Thing>& a) {unpack(b,"",a);}
void w_unpack_const(unpack_t& b, const shared_ptr<w::Thing>& a) {unpack(b,"",a);}
void w_unpack_poly(unpack_t& b, poly<w::Thing>& a) {classdesc_access::access_unpack<poly<w::Thing> >()(b,"",a);}
void w_unpack_ptr(unpack_t& b, shared_ptr<w::PBase>& a) {classdesc::unpack_smart_ptr(b,"",a);}
